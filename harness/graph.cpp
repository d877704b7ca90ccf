// The graph maze itself. WHAT 1: edits against a reference list of edges; 2: pruning keeps distances and leaves no loose ends; 3: the same on a graph of dozens of nodes. W: weight type.
#include "common.hpp"
#ifndef WHAT
#define WHAT 1
#endif
#ifndef W
#define W uint32_t
#endif
using namespace vp;
using G = chdr::mazes::graph<uint32_t, W>;
#if WHAT == 1
extern "C" void harness() {
    const unsigned n = (unsigned)vp_param("n", 3), ops = (unsigned)vp_param("ops", 4), fill = (unsigned)vp_param("fill", 0);
    struct edge { unsigned from, to; W w; }; std::vector<edge> ref; ref.reserve(1024); static bool node[1024]; for (bool& x : node) x = false;
    const bool hub = vp_param("hub", 0); const uint32_t base = (uint32_t)vp_param("base", 0), gap = (uint32_t)vp_param("gap", 1); // a large graph: node 0 is joined to every other, in a circle; a few of the nodes are edited
    const auto id = [&](unsigned i) { return base + gap * i; };
    const auto site = [&](const char* what) { const unsigned few[] = {0, 1, n / 2, n - 1}; return hub ? few[vp_pick(what, 0, 3)] : (unsigned)vp_pick(what, 0, n - 1); };
    G g;
    if (hub) for (unsigned i = 0; i < n; ++i) { if (i) { g.add(id(0), {id(i), W(i & 3)}); ref.push_back({0, i, W(i & 3)}); } g.add(id(i), {id((i + 1) % n), W(1)}); ref.push_back({i, (i + 1) % n, W(1)}); node[i] = true; }
    auto add = [&](unsigned a, unsigned b, W w) { g.add(id(a), {id(b), w}); ref.push_back({a, b, w}); node[a] = true; };
    for (unsigned i = 0; i < fill; ++i) add(i % n, (i + 1) % n, W(vp_sym("weight", 2)));
    for (unsigned k = 0; k < ops; ++k) {
        const unsigned op = (unsigned)vp_pick("op", 0, k + 1 == ops && vp_param("clear", 1) ? 4 : 2), a = op < 3 ? site("from") : 0;
        if (op == 0) { g.add(id(a)); node[a] = true; }
        else if (op == 1) add(a, site("to"), W(vp_sym("weight", 2)));
        else if (op == 2) { // all edges equal to this one go; a node left without edges by that goes with them
            const unsigned b = site("to"); const W w = W(vp_sym("weight", 2));
            g.remove(id(a), {id(b), w});
            if (node[a]) { unsigned left = 0; for (size_t i = 0; i < ref.size();) { if (ref[i].from == a && ref[i].to == b && ref[i].w == w) ref.erase(ref.begin() + i); else { left += ref[i].from == a; ++i; } } if (left == 0) node[a] = false; }
        }
        else if (op == 3) { g.clear(); ref.clear(); for (auto& x : node) x = false; }
        else { G h(std::move(g)); g = std::move(h); }
    }
    size_t total = 0; for (unsigned a = 0; a < n; ++a) total += node[a];
    vp_note("nodes", total);
    vp_assert(g.count() == total, "the number of nodes is wrong");
    vp_assert(size_t(std::distance(g.begin(), g.end())) == total, "iterating visits a different number of nodes");
    const G& cg = g;
    for (unsigned a = 0; a < n; ++a) {
        vp_assert(cg.contains(id(a)) == node[a], "contains answers wrongly");
        if (!node[a]) continue;
        const auto& nb = cg.get_neighbours(id(a)); unsigned deg = 0; static bool used[1024]; for (unsigned i = 0; i < nb.size() && i < 1024; ++i) used[i] = false;
        for (const auto& r : ref) if (r.from == a) { ++deg; bool hit = false; for (unsigned i = 0; i < nb.size() && i < 1024 && !hit; ++i) if (!used[i] && nb[i].first == id(r.to) && nb[i].second == r.w) used[i] = hit = true; vp_assert(hit, "an edge that was added is missing"); }
        vp_assert(nb.size() == deg, "a node has edges that were not added");
        vp_assert(cg[id(a)].id() == id(a), "looking a node up by its id gives another node"); vp_assert(cg[id(a)].is_active(), "a node of a graph is not active");
    }
    for (const auto& en : cg) vp_assert((en.first - base) % gap == 0 && (en.first - base) / gap < n && node[(en.first - base) / gap], "iterating visits a node that was not added");
    vp_reach("checked");
}
#elif WHAT == 3
extern "C" void harness() { // stretches of a chain, cross connections, and some more that may or may not be there
    const unsigned n = (unsigned)vp_param("n", 60), extra = (unsigned)vp_param("extra", 4), stretch = (unsigned)vp_param("stretch", 9); static constexpr unsigned MAX = 64; static constexpr unsigned inf = 1u << 20;
    static unsigned dist[MAX][MAX], after[MAX][MAX]; static unsigned degree[MAX]; bool kept[MAX];
    for (unsigned a = 0; a < n; ++a) { degree[a] = 0; for (unsigned b = 0; b < n; ++b) { dist[a][b] = after[a][b] = a == b ? 0 : inf; } }
    G g; for (unsigned a = 0; a < n; ++a) g.add(a);
    const auto join = [&](unsigned a, unsigned b, unsigned x) { if (a == b || dist[a][b] < inf) return; g.add(a, {b, W(x)}); g.add(b, {a, W(x)}); dist[a][b] = dist[b][a] = x; ++degree[a]; ++degree[b]; };
    for (unsigned i = 0; i + 1 < n; ++i) if (i % stretch != stretch - 1) join(i, i + 1, 1 + i * 7 % 5);
    for (unsigned i = 3; i < n; i += 7) join(i, i * 5 % n, 2 + i % 3);
    for (unsigned k = 0; k < extra; ++k) if (vp_pick("edge", 0, 1)) join((k * 13 + 2) % n, (k * 29 + 17) % n, 3);
    const auto close = [&](unsigned (*d)[MAX]) { for (unsigned m = 0; m < n; ++m) for (unsigned a = 0; a < n; ++a) if (d[a][m] < inf) for (unsigned b = 0; b < n; ++b) if (d[a][m] + d[m][b] < d[a][b]) d[a][b] = d[a][m] + d[m][b]; };
    close(dist);
    if (vp_param("plain", 0)) g.template prune<false>(); else g.prune();
    unsigned left = 0; for (unsigned a = 0; a < n; ++a) { kept[a] = g.contains(a); left += kept[a]; }
    vp_assert(g.count() == left, "the number of nodes is wrong"); vp_note("nodes left", left);
    for (unsigned a = 0; a < n; ++a) {
        if (degree[a] < 2) vp_assert(kept[a], "pruning removed a dead end");
        if (!kept[a]) continue;
        const auto& nb = g.get_neighbours(a);
        for (const auto& x : nb) {
            const unsigned b = (unsigned)vp_concretize(x.first); vp_assert(b < n && kept[b < n ? b : 0] && b != a, "an edge leads to a node that was removed, or back to itself");
            bool back = false; for (const auto& y : g.get_neighbours(b)) back |= (y.first == a) & (y.second == x.second); vp_assert(back, "an edge lost its counterpart");
            if (x.second < after[a][b]) after[a][b] = (unsigned)x.second;
        }
        if (left > 2) vp_assert(nb.size() != 2 || nb.front().first == nb.back().first, "a node between two others was left in place");
    }
    close(after); bool same = true; for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) if (kept[a] && kept[b]) same &= after[a][b] == dist[a][b];
    vp_assert(same, "pruning changed the distance between two nodes"); vp_reach(left < n ? "nodes removed" : "nothing removed");
}
#elif WHAT == 2
extern "C" void harness() { // undirected graph: bit k of `edges` = k-th pair; bits also in `free` vary; `par`: pairs that carry a second edge
    const unsigned n = (unsigned)vp_param("n", 5); const uint64_t edges = vp_param("edges", ~0ull), free_ = vp_param("free", 0), par = vp_param("par", 0); const unsigned wbits = (unsigned)vp_param("wbits", 3);
    W dist[8][8]; const W inf = 1 << 20; bool has[8][8] = {}; unsigned degree[8] = {};
    G g; for (unsigned a = 0; a < n; ++a) { g.add(a); for (unsigned b = 0; b < n; ++b) dist[a][b] = a == b ? 0 : inf; }
    unsigned k = 0;
    for (unsigned a = 0; a < n; ++a) for (unsigned b = a + 1; b < n; ++b, ++k) {
        bool on = (edges >> k) & 1; if (on && ((free_ >> k) & 1)) on = vp_concretize(vp_sym("edge", 1)) != 0;
        for (unsigned c = 0; on && c < 1 + ((par >> k) & 1); ++c) {
            const W x = wbits ? W(vp_range("weight", 1, (1u << wbits) - 1)) : W(1);
            g.add(a, {b, x}); g.add(b, {a, x}); has[a][b] = has[b][a] = true; ++degree[a]; ++degree[b];
            dist[a][b] = dist[b][a] = W(vp_select(x < dist[a][b], x, dist[a][b]));
        }
    }
    auto close = [&](W d[8][8]) { for (unsigned m = 0; m < n; ++m) for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) { const W t = d[a][m] + d[m][b]; d[a][b] = W(vp_select(t < d[a][b], t, d[a][b])); } };
    close(dist);
    if (vp_param("plain", 0)) g.template prune<false>(); else g.prune();
    W after[8][8]; bool kept[8]; unsigned left = 0;
    for (unsigned a = 0; a < n; ++a) { kept[a] = g.contains(a); left += kept[a]; for (unsigned b = 0; b < n; ++b) after[a][b] = a == b ? 0 : inf; }
    vp_assert(g.count() == left, "the number of nodes is wrong"); vp_note("nodes left", left);
    for (unsigned a = 0; a < n; ++a) {
        if (degree[a] < 2) vp_assert(kept[a], "pruning removed a dead end");
        if (!kept[a]) continue;
        const auto& nb = g.get_neighbours(a);
        for (const auto& x : nb) {
            const unsigned b = (unsigned)vp_concretize(x.first);
            vp_assert(b < n && kept[b < n ? b : 0], "an edge leads to a node that was removed");
            unsigned back = 0; for (const auto& y : g.get_neighbours(b)) back |= (y.first == a) & (y.second == x.second);
            vp_assert(back, "an edge lost its counterpart"); vp_assert(b != a, "a node was connected to itself");
            after[a][b] = W(vp_select(x.second < after[a][b], x.second, after[a][b]));
        }
    }
    if (left > 2) for (unsigned a = 0; a < n; ++a) if (kept[a]) { // what can be simplified was
        const auto& nb = g.get_neighbours(a); vp_assert(nb.size() != 2 || nb.front().first == nb.back().first, "a node between two others was left in place");
    }
    close(after);
    bool same = true, reach = true;
    for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) if (kept[a] && kept[b]) { reach &= (after[a][b] < inf) == (dist[a][b] < inf); same &= (dist[a][b] >= inf) | (after[a][b] == dist[a][b]); }
    vp_assert(reach, "pruning disconnected nodes or connected separate ones"); vp_assert(same, "pruning changed the distance between two nodes");
    vp_reach(left < n ? "nodes removed" : "nothing removed");
}
#endif
