// One solver on a graph of a hundred and more nodes with arbitrary identifiers; a few weights are symbolic. Macros as for wgraph.cpp.
// Parameters: kind (0 a chain with three bypasses whose weights vary around the cost of what they replace, or that are there or not, 1 a lattice w x h with two symbolic weights), base and gap (node i is called base + gap * i), oneway (edges lead forward only), mode as in wgraph.cpp.
#include "common.hpp"
#ifndef POOL
#define POOL 4096
#endif
using namespace vp;
using C = co<1>;
using G = chdr::mazes::graph<INDEX, SCALAR>;
using P = params<G, C, uint32_t, REV, false, LAZY, NOCLEAN, POOL>;
#ifndef MAXN
#define MAXN 512
#endif
struct edge { unsigned to; SCALAR w; };
static std::vector<edge> out[MAXN]; static uint64_t cost[MAXN]; static bool seen[MAXN];
extern "C" void harness() {
    const unsigned kind = (unsigned)vp_param("kind", 0), mode = (unsigned)vp_param("mode", 7), w = (unsigned)vp_param("w", 10), h = (unsigned)vp_param("h", 10), n = kind ? w * h : (unsigned)vp_param("n", 150);
    const uint64_t base = vp_param("base", 0), gap = vp_param("gap", 1); const bool oneway = vp_param("oneway", 0);
    const auto id = [&](unsigned i) { return (INDEX)(base + gap * i); };
    G g; for (unsigned i = 0; i < n; ++i) { out[i].clear(); g.add(id(i)); }
    const auto join = [&](unsigned a, unsigned b, SCALAR x, SCALAR y) { g.add(id(a), {id(b), x}); out[a].push_back({b, x}); if (!oneway) { g.add(id(b), {id(a), y}); out[b].push_back({a, y}); } };
    const auto weight = [](unsigned i) { return SCALAR(1 + (i * 7 + 3) % 11); };
    SCALAR by[3] = {}; const unsigned from[3] = {n / 10, n / 3, n - n / 4}, to[3] = {n / 10 + n / 8, n / 3 + n / 4, n - n / 20};
    if (kind == 0) {
        for (unsigned i = 0; i + 1 < n; ++i) { const SCALAR x = mode & 4 ? weight(i) : SCALAR(1); join(i, i + 1, x, x); }
        for (unsigned k = 0; k < 3; ++k) { // just cheaper, as dear, just dearer, or far from it; or there or not
            unsigned way = 0; for (unsigned i = from[k]; i < to[k]; ++i) way += (unsigned)weight(i);
            const unsigned choice[] = {way - 1, way + 1, way, 1, way + 250}; by[k] = mode & 4 ? SCALAR(choice[vp_pick("bypass", 0, (unsigned)vp_param("choices", 5) - 1)]) : SCALAR(vp_pick("bypass", 0, 1));
            if (by[k] != SCALAR(0)) join(from[k], to[k], by[k], by[k]);
        }
    } else for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) { // two of the weights vary
        const unsigned i = x + w * y; const auto pick = [&](unsigned k) { return !(mode & 4) ? SCALAR(1) : i == n / 2 + w / 2 || (i == w + 1 && k == 1) ? (SCALAR)vp_concretize(vp_range("weight", 1, 5)) : weight(i * 2 + k); };
        if (x + 1 < w) { const SCALAR a = pick(0); join(i, i + 1, a, a); } if (y + 1 < h) { const SCALAR a = pick(1); join(i, i + w, a, a); }
    }
    const unsigned s = 0, e = n - 1;
    P p{g, C{(COORD)id(s)}, C{(COORD)id(e)}, C{(COORD)id(n)}, &h_zero<SCALAR, C>, nullptr, nullptr, nullptr};
    P::pools pools; pools.into(p); p.memory_limit = vp_param("memory_limit", 4096); p.capacity = vp::capacity();
    auto path = chdr::solvers::solver<chdr::solvers::ALGO, P>::solve(std::as_const(p));
    vp_note("path_nodes", path.size());
    vp_assert(!path.empty(), "no path was returned although one exists");
    vp_assert(path.size() <= n, "the path is longer than the number of nodes");
    std::vector<unsigned> at; bool known = true;
    for (const auto& c : path) { const uint64_t x = (uint64_t)vp_concretize(c[0]); known &= x >= base && (x - base) % gap == 0 && (x - base) / gap < n; at.push_back(unsigned((x - base) / gap)); }
    vp_assert(known, "a path node does not exist"); if (!known) return;
    const auto find = [&](unsigned a, unsigned b, SCALAR& x) { bool hit = false; for (const auto& o : out[a]) if (o.to == b) { x = hit && x < o.w ? x : o.w; hit = true; } return hit; };
    SCALAR x; if (!(at.front() == s || find(s, at.front(), x)) || !(at.back() == e || find(at.back(), e, x))) std::reverse(at.begin(), at.end()); // listed from the end
    if (at.front() != s) at.insert(at.begin(), s); if (at.back() != e) at.push_back(e);
    SCALAR sum = 0; bool adj = true, dup = false; for (unsigned i = 0; i < n; ++i) seen[i] = false;
    for (size_t i = 0; i < at.size(); ++i) { dup |= seen[at[i]]; seen[at[i]] = true; if (i) { x = 0; adj &= find(at[i - 1], at[i], x); sum += x; } }
    if (mode & 2) { vp_assert(adj, "consecutive path nodes are not connected, or the path does not join start and end"); vp_assert(!dup, "the path visits a node twice"); }
    if ((mode & 4) && adj) {
        SCALAR least = 0;
        if (kind == 0) { // every bypass is taken or not, one after the other
            unsigned k = 0; for (unsigned i = 0; i + 1 < n;) if (k < 3 && i == from[k]) { SCALAR way = 0; for (; i < to[k]; ++i) way += weight(i); least += by[k] < way ? by[k] : way; ++k; } else least += weight(i++);
        } else {
            for (unsigned i = 0; i < n; ++i) cost[i] = ~0ull >> 2; cost[s] = 0; bool more = true;
            while (more) { more = false; for (unsigned i = 0; i < n; ++i) for (const auto& o : out[i]) if (cost[i] + (uint64_t)o.w < cost[o.to]) { cost[o.to] = cost[i] + (uint64_t)o.w; more = true; } }
            least = (SCALAR)cost[e];
        }
        vp_assert(sum <= least, "the path costs more than the cheapest one");
    }
    vp_reach("path");
}
