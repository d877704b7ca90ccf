// One solver on a maze of several hundred cells, a few of them symbolic. Macros as for solve.cpp (two dimensions).
// JUMP: the solver lists jump points. Parameters: d0, d1; kind (0 corridors joined by doors, some of them symbolic; 1 a hall with symbolic pillars); s, e (255 picks the end among the corners); mode as in solve.cpp.
#include "common.hpp"
#ifndef POOL
#define POOL 4096
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
using namespace vp;
using C = co<2>;
using maze_t = chdr::mazes::grid<C, CELL>;
#ifdef ACCOUNT
#include "account.hpp"
using P = rparams<maze_t, C, CELL>;
#else
using P = params<maze_t, C, CELL, REV, OCT, LAZY, NOCLEAN, POOL>;
#endif
#ifndef MAXN
#define MAXN 512
#endif
static uint8_t sym[MAXN]; static bool open[MAXN]; static uint32_t dist[MAXN], todo[MAXN]; static bool seen[MAXN]; static constexpr uint32_t FAR = ~0u;
extern "C" void harness() {
    C size{(COORD)vp_param("d0", 17), (COORD)vp_param("d1", 17)}; const unsigned w = (unsigned)size[0], h = (unsigned)size[1], n = w * h, mode = (unsigned)vp_param("mode", 7), kind = (unsigned)vp_param("kind", 0);
    unsigned left = (unsigned)vp_param("free", 3); const unsigned every = (unsigned)vp_param("every", 2), from = (unsigned)vp_param("from", 1);
    for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) {
        bool o = true, f = false;
        if (kind == 0) { if (y & 1) { o = x == ((y & 2) ? 0 : w - 1); f = left && x + w * y >= from && !o && (y / 2) % every == 0 && x == (y * 7 + 5) % w; if (f) --left; } }
        else { f = left && (x * 5 + y * 11) % 37 == 0 && x + w * y >= from; if (f) --left; }
        const unsigned i = x + w * y; sym[i] = f ? (uint8_t)vp_sym("open", 1) : (uint8_t)o;
    }
    const unsigned s = (unsigned)vp_param("s", 0); unsigned e = (unsigned)vp_param("e", 0xffff); if (e == 0xffff) { const unsigned far[] = {n - 1, n - w, w - 1, n / 2}; e = far[vp_pick("end", 0, 3)]; }
    std::vector<CELL> cells(n); for (unsigned i = 0; i < n; ++i) cells[i] = CELL(cell<CELL>(sym[i], i));
    maze_t maze(size, cells);
    P p{maze, coordof<2>(s, size), coordof<2>(e, size), size, OCT ? &h_chebyshev<SCALAR, C> : &h_manhattan<SCALAR, C>, nullptr, nullptr, nullptr};
#ifdef ACCOUNT
    static resource<false> mono; static resource<true> het, hom; mono.reset(); het.reset(); hom.reset(); hom.peak = 0; p.monotonic_pmr = &mono; p.heterogeneous_pmr = &het; p.homogeneous_pmr = &hom;
#else
    P::pools pools; pools.into(p);
#endif
    p.memory_limit = vp_param("memory_limit", 90); if (vp_param("limits", 0)) { static const unsigned few[] = {1, 2, 3, 5, 9, 16, 30, 60, 90, 120, 200, 400}; p.memory_limit = few[vp_pick("limit", 0, 11)]; }
    p.capacity = vp::capacity(); const unsigned weight = (unsigned)vp_param("weight", 1), slack = weight > 1 ? weight : 1; p.weight = (SCALAR)weight;
    const unsigned faults = (unsigned)vp_param("faults", 0); int64_t fault = -1; // one request fails: each of the first, then ever sparser
    if (faults) { fault = vp_pick("failing_allocation", 0, faults - 1); if (fault > 7) { const unsigned k = (unsigned)fault - 8; fault = (int64_t)((8u << (k / 4)) + ((k % 4) * (8u << (k / 4))) / 4); } }
    std::vector<C> path; [[maybe_unused]] const uint64_t base = vp_heap_live(); bool failed = false;
    vp_fail_alloc(fault);
    try { path = chdr::solvers::solver<chdr::solvers::ALGO, P>::solve(std::as_const(p)); }
    catch (const std::bad_alloc&) { failed = true; }
    vp_fail_alloc(-1); vp_assert(fault >= 0 || !failed, "bad_alloc although memory was available");
#ifdef ACCOUNT
    if (!NOCLEAN) vp_assert(vp_heap_live() == base + (path.capacity() != 0), "memory was not given back after solving");
    if (failed) { vp_reach("allocation failure reported"); if (!NOCLEAN) vp_assert(mono.used == 0 && het.used == 0 && hom.used == 0, "a resource was not reset after a failure"); hom.peak = 0; path = chdr::solvers::solver<chdr::solvers::ALGO, P>::solve(std::as_const(p)); }
    else if (vp_param("twice", 0)) { auto again = chdr::solvers::solver<chdr::solvers::ALGO, P>::solve(std::as_const(p)); vp_assert(again == path, "the same resources give another answer the second time"); }
#endif
    const size_t len = path.size(); vp_note("path_cells", len);
#ifdef ACCOUNT
    if (vp_param("peak", 0)) vp_assert(hom.peak <= p.memory_limit, "more search nodes are kept than the memory limit allows");
    if (!NOCLEAN) vp_assert(mono.used == 0 && het.used == 0 && hom.used == 0, "a resource was not reset after solving");
#endif
    // the answer by breadth-first search; the cells the solver did not look at may still be open or not
    for (unsigned i = 0; i < n; ++i) { open[i] = vp_concretize(sym[i]) != 0; dist[i] = FAR; }
    const auto near = [&](unsigned a, unsigned b) { const unsigned ax = a % w, ay = a / w, bx = b % w, by = b / w, dx = ax > bx ? ax - bx : bx - ax, dy = ay > by ? ay - by : by - ay; return OCT ? dx <= 1 && dy <= 1 && dx + dy : dx + dy == 1; };
    if (open[s] && open[e]) {
        unsigned at = 0, end = 0; todo[end++] = s; dist[s] = 0;
        while (at < end) { const unsigned c = todo[at++]; for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { const int x = int(c % w) + dx, y = int(c / w) + dy; if ((!dx && !dy) || (!OCT && dx && dy) || x < 0 || y < 0 || x >= int(w) || y >= int(h)) continue;
#ifdef JUMP // a diagonal step needs an open cell beside it
            if (dx && dy && !open[c + dx] && !open[unsigned(x + w * y) - dx]) continue;
#endif
            const unsigned i = x + w * y; if (open[i] && dist[i] == FAR) { dist[i] = dist[c] + 1; todo[end++] = i; } } }
    }
    if (len == 0) { vp_reach("no path"); if (mode & 1) vp_assert(dist[e] == FAR, "no path was returned although one exists"); return; }
    vp_reach("path"); 
#ifndef JUMP
    vp_assert(dist[e] != FAR || !(mode & 1), "a path was returned although none exists");
#endif

#ifdef JUMP // the path is a list of jump points joined by straight lines
    std::vector<unsigned> at; bool in = true; for (const auto& c : path) { const unsigned x = (unsigned)vp_concretize(c[0]), y = (unsigned)vp_concretize(c[1]); in &= x < w && y < h; at.push_back(x + w * y); }
    vp_assert(in, "a path point lies outside the maze"); if (!in) return;
    const auto line = [&](unsigned a, unsigned b) { const unsigned ax = a % w, ay = a / w, bx = b % w, by = b / w, dx = ax > bx ? ax - bx : bx - ax, dy = ay > by ? ay - by : by - ay; return dx == dy || !dx || !dy; };
    if (!(line(s, at.front()) && at.back() == e)) std::reverse(at.begin(), at.end());
    if (at.front() != s) at.insert(at.begin(), s); if (at.back() != e) at.push_back(e);
    bool straight = true, clear = open[s] && open[e]; unsigned moved = 0;
    for (size_t i = 1; i < at.size() && straight; ++i) { straight &= line(at[i - 1], at[i]); for (unsigned c = at[i - 1]; straight && c != at[i]; ++moved) { const unsigned cx = c % w, cy = c / w, tx = at[i] % w, ty = at[i] / w; c = (cx < tx ? cx + 1 : cx > tx ? cx - 1 : cx) + w * (cy < ty ? cy + 1 : cy > ty ? cy - 1 : cy); clear &= open[c]; } }
    if (mode & 2) { vp_assert(straight, "consecutive path points are not on one straight or diagonal line"); vp_assert(clear, "the path passes through a blocked cell"); }
    if ((mode & 4) && straight) vp_assert(moved <= dist[e], "the path is longer than necessary");
    return;
#endif
    for (unsigned i = 0; i < n; ++i) seen[i] = false;
    vp_assert(len <= n || (mode & 32), "the path is longer than the number of cells");
    unsigned last = 0, first = 0; bool inb = true, opn = true, adj = true, dup = false;
    for (size_t i = 0; i < len; ++i) {
        const unsigned x = (unsigned)vp_concretize(path[i][0]), y = (unsigned)vp_concretize(path[i][1]); if (x >= w || y >= h) { inb = false; break; }
        const unsigned c = x + w * y; opn &= open[c]; dup |= seen[c]; seen[c] = true; if (i) adj &= near(last, c); else first = c; last = c;
    }
    vp_assert(inb, "a path cell lies outside the maze");
    if (mode & 2) {
        vp_assert(opn, "the path passes through a blocked cell"); vp_assert(adj, "consecutive path cells are not adjacent"); vp_assert(!dup || (mode & 32), "the path visits a cell twice");
        const auto joins = [&](unsigned a, unsigned b) { return a == b || near(a, b); }; vp_assert((joins(first, s) && joins(last, e)) || (joins(first, e) && joins(last, s)), "the path does not connect start and end");
    }
    if (mode & 4) { const bool fwd = first == s || near(first, s); const unsigned a = fwd ? s : e, b = fwd ? e : s; const unsigned moves = (unsigned)len - 1 + (first != a) + (last != b); vp_assert(moves <= slack * dist[e], "the path is longer than necessary"); }
}
