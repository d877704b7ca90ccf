// A graph built from a grid (the parallel constructor). Macros: KD, CELL. std::async comes from shim/future: every order of the workers.
#include <future>
#include "common.hpp"
#include <thread>
#include <pthread.h>
#ifndef KD
#define KD 2
#endif
#ifndef CELL
#define CELL char
#endif
using namespace vp;
static constexpr uint16_t FAR = 60000;
using C = co<KD>;
using M = chdr::mazes::grid<C, CELL>;
using G = chdr::mazes::graph<uint32_t, uint32_t>;
static unsigned cores = 1; static int locked = 0;
unsigned std::thread::hardware_concurrency() noexcept { return cores; }
extern "C" int pthread_mutex_lock(pthread_mutex_t*) noexcept { vp_assert(!locked, "a worker waits for a lock it holds"); ++locked; return 0; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t*) noexcept { --locked; return 0; }
struct shared final : std::pmr::memory_resource { // the graph's memory: workers may only touch it one at a time
    void* do_allocate(size_t n, size_t a) override { vp_assert(!pending().running || locked, "a worker changes the graph without holding the lock"); return ::operator new(n, std::align_val_t(a)); }
    void do_deallocate(void* p, size_t n, size_t a) override { vp_assert(!pending().running || locked, "a worker changes the graph without holding the lock"); ::operator delete(p, n, std::align_val_t(a)); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
extern "C" void harness() {
    static const char* const dn[] = {"d0", "d1", "d2", "d3"};
    C size; unsigned n = 1; for (unsigned i = 0; i < KD; ++i) n *= size[i] = (uint32_t)vp_param(dn[i], 2);
    const uint64_t pattern = vp_param("pattern", 0), free_ = vp_param("free", ~0ull);
    cores = vp_param("cores", 1) == 255 ? (unsigned)vp_pick("cores", 0, 7) : (unsigned)vp_param("cores", 1);
    pending().anyorder = vp_param("anyorder", 1) != 0;
    unsigned left = (unsigned)vp_param("large", 0); const bool large = left != 0; // corridors with some connections, that many cells of which are symbolic
    std::vector<CELL> cells(n); std::vector<uint8_t> sym(n);
    for (unsigned i = 0; i < n; ++i) { bool f = i < 64 && ((free_ >> i) & 1), o = i < 64 && ((pattern >> i) & 1); if (large) { const unsigned x = i % size[0], y = i / size[0]; o = !(y & 1) || x == ((y & 2) ? 0 : size[0] - 1) || (x * 3 + y) % 11 == 0; f = left && (x * 5 + y * 7) % 23 == 0; if (f) --left; } sym[i] = f ? (uint8_t)vp_sym("open", 1) : (uint8_t)o; cells[i] = CELL(cell<CELL>(sym[i], i)); }
    M grid(size, cells);
    shared memory;
    const uint64_t before = vp_heap_live();
    {
        G g(grid, &memory);
        vp_assert(!locked, "the lock is still held");
        bool open[160]; for (unsigned i = 0; i < n; ++i) open[i] = vp_concretize(sym[i]) != 0;
        // the grid's own distances
        static uint16_t dist[160][160]; static unsigned deg[160]; for (unsigned& d : deg) d = 0;
        for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) dist[a][b] = a == b && open[a] ? 0 : FAR;
        for (unsigned a = 0, st = 1; a < n; ++a) { unsigned r = a; st = 1; for (unsigned i = 0; i < KD; ++i) { const unsigned x = r % size[i]; r /= size[i]; if (x + 1 < size[i] && open[a] && open[a + st]) { dist[a][a + st] = dist[a + st][a] = 1; ++deg[a]; ++deg[a + st]; } st *= size[i]; } }
        for (unsigned m = 0; m < n; ++m) for (unsigned a = 0; a < n; ++a) if (dist[a][m] < FAR) for (unsigned b = 0; b < n; ++b) if (dist[a][m] + dist[m][b] < dist[a][b]) dist[a][b] = uint16_t(dist[a][m] + dist[m][b]);
        // the graph's
        static uint16_t got[160][160]; bool kept[160]; unsigned left = 0;
        for (unsigned a = 0; a < n; ++a) { kept[a] = g.contains(a); left += kept[a]; for (unsigned b = 0; b < n; ++b) got[a][b] = a == b ? 0 : FAR; }
        vp_note("nodes", left); vp_assert(g.count() == left, "the graph has a node that is not a cell");
        for (unsigned a = 0; a < n; ++a) {
            if (deg[a] == 1) vp_assert(kept[a], "a dead end is missing");
            if (!kept[a]) continue;
            vp_assert(open[a], "a blocked cell became a node");
            for (const auto& x : g.get_neighbours(a)) { const unsigned b = (unsigned)vp_concretize(x.first); vp_assert(b < n && kept[b < n ? b : 0], "an edge leads to a node that does not exist"); if (x.second < got[a][b]) got[a][b] = (uint16_t)x.second; }
        }
        for (unsigned a = 0; a < n; ++a) if (deg[a] > 2) { unsigned others = 0, nodes = 0; for (unsigned b = 0; b < n; ++b) if (dist[a][b] < FAR) { others += b != a && deg[b] != 2; nodes += kept[b]; } if (others) vp_assert(nodes >= 2, "a region with several junctions or dead ends has fewer than two nodes"); }
        for (unsigned m = 0; m < n; ++m) if (kept[m]) for (unsigned a = 0; a < n; ++a) if (got[a][m] < FAR) for (unsigned b = 0; b < n; ++b) if (got[a][m] + got[m][b] < got[a][b]) got[a][b] = uint16_t(got[a][m] + got[m][b]);
        for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) if (kept[a] && kept[b]) {
            vp_assert((got[a][b] < FAR) == (dist[a][b] < FAR), "two nodes are connected in the graph but not in the grid, or the other way round");
            vp_assert(got[a][b] == dist[a][b], "the graph's distance between two nodes differs from the grid's");
        }
        vp_reach(left ? "nodes" : "no nodes");
    }
    vp_assert(vp_heap_live() == before, "memory was not given back");
}
