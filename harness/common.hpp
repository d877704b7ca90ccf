// Shared by all harnesses: the library under test (current /repo tree), parameter packs and reference models.
#pragma once
#include "vp.h"
#include <array>
#include <cassert>
#include <cstdint>
#include <cstddef>
#include <algorithm>
#include <exception>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <chdr.hpp>

namespace vp {
#ifndef COORD
#define COORD uint32_t
#endif
#ifndef SCALAR
#define SCALAR uint32_t
#endif
#ifndef INDEX
#define INDEX uint32_t
#endif
    template <size_t K> using co = chdr::coord<COORD, K>;

    template <typename maze_t, typename coord_t, typename W, bool Rev = true, bool Oct = false, bool Lazy = false, bool NoClean = true, size_t Stack = 4096U, typename S = SCALAR>
    struct params {
        using weight_type = W; using scalar_type = S; using index_type = INDEX; using coord_type = coord_t;
        using lazy_sorting = std::bool_constant<Lazy>; using no_cleanup = std::bool_constant<NoClean>;
        using reverse_equivalence = std::bool_constant<Rev>; using octile_neighbours = std::bool_constant<Oct>;
        using mono_t = chdr::monotonic_pool<Stack>; using het_t = chdr::heterogeneous_pool<Stack>; using hom_t = chdr::homogeneous_pool<Stack>;
        const maze_t& maze; coord_type start, end, size;
        scalar_type (*h)(const coord_type&, const coord_type&) noexcept;
        mono_t* monotonic_pmr; het_t* heterogeneous_pmr; hom_t* homogeneous_pmr;
        scalar_type weight = 1U; size_t capacity = 0U; size_t memory_limit = 90U;
        struct pools { mono_t mono; het_t het; hom_t hom; void into(params& p) { p.monotonic_pmr = &mono; p.heterogeneous_pmr = &het; p.homogeneous_pmr = &hom; } };
    };
    template <typename S, typename C> S h_manhattan(const C& a, const C& b) noexcept { return chdr::heuristics::manhattan_distance<S, C>(a, b); }
    template <typename S, typename C> S h_chebyshev(const C& a, const C& b) noexcept { return chdr::heuristics::chebyshev_distance<S, C>(a, b); }
    template <typename S, typename C> S h_euclidean(const C& a, const C& b) noexcept { return chdr::heuristics::euclidean_distance<S, C>(a, b); }
    template <typename S, typename C> S h_zero(const C&, const C&) noexcept { return S{0}; }

    // ---- reference model of a grid of at most 64 cells: cell i open <=> bit i of `open` ----
    struct gridspec {
        unsigned K; unsigned size[5]; unsigned n; bool oct;
        bool adjacent(unsigned a, unsigned b) const { // concrete cells
            unsigned stride = 1, diff = 0, mx = 0;
            for (unsigned d = 0; d < K; ++d) { unsigned x = (a / stride) % size[d], y = (b / stride) % size[d]; unsigned t = x > y ? x - y : y - x; diff += t; if (t > mx) mx = t; stride *= size[d]; }
            return oct ? (mx == 1) : (diff == 1);
        }
        // one breadth-first round over all cells, one bit per cell so that what the path condition fixes folds away
        void round(const bool* open, const bool* r, bool* out) const {
            for (unsigned i = 0; i < n; ++i) { bool x = r[i]; for (unsigned k = 0; k < degree[i]; ++k) x |= r[nbr[i][k]]; out[i] = x & open[i]; }
        }
        // is e at most `steps` steps from s through open cells (s itself counts as open)? branch-free in `open`
        bool within(const bool* open, unsigned s, unsigned e, unsigned steps) const {
            bool a[64] = {}, b[64]; a[s] = true;
            for (unsigned k = 0; k < steps; ++k) { round(open, a, b); b[s] = true; for (unsigned i = 0; i < n; ++i) a[i] = b[i]; }
            return a[e];
        }
        bool connected(const bool* open, unsigned s, unsigned e) const { return open[s] & open[e] & within(open, s, e, n - 1); }
        void finish() { for (unsigned i = 0; i < n; ++i) { degree[i] = 0; for (unsigned j = 0; j < n; ++j) if (adjacent(i, j)) nbr[i][degree[i]++] = (unsigned char)j; } }
        unsigned char degree[64], nbr[64][80];
    };
    template <size_t K> gridspec spec(const co<K>& size, bool oct = false) { gridspec g{}; g.K = K; g.n = 1; g.oct = oct; for (size_t i = 0; i < K; ++i) { g.size[i] = size[i]; g.n *= size[i]; } g.finish(); return g; }
    template <size_t K> unsigned index(const co<K>& c, const co<K>& size) { unsigned r = 0, st = 1; for (size_t i = 0; i < K; ++i) { r += c[i] * st; st *= size[i]; } return r; }
    template <size_t K> co<K> coordof(unsigned i, const co<K>& size) { co<K> c{}; for (size_t d = 0; d < K; ++d) { c[d] = i % size[d]; i /= size[d]; } return c; }

    // symbolic mazes: cell i is open iff open[i]
    inline std::vector<bool> bool_cells(const bool* open, unsigned n) { std::vector<bool> v(n); for (unsigned b = 0; b < n; b += 64) { uint64_t m = 0; for (unsigned i = b; i < n && i < b + 64; ++i) m |= uint64_t(!open[i]) << (i - b); v.begin()._M_p[b / 64] = m; } return v; }
    inline size_t capacity() { static const size_t few[] = {1, 2, 4, 8, 63, 100, 5000}; return vp_param("capacities", 0) ? few[vp_pick("capacity", 0, 6)] : (size_t)vp_param("capacity", 0); }
    // any value but the largest is an open cell: the smallest, the second largest and others take turns
    template <typename W> uint64_t cell(uint64_t open, unsigned i) { constexpr W top = std::numeric_limits<W>::max(); const W o[] = {W(0), W(top - W(1)), std::numeric_limits<W>::min(), W(1)}; return vp_select(open, std::is_same_v<W, bool> ? 0 : uint64_t(o[i & 3]), uint64_t(top)); }
    template <typename W> std::vector<W> weight_cells(const bool* open, unsigned n) { std::vector<W> v(n); for (unsigned i = 0; i < n; ++i) v[i] = W(cell<W>(open[i], i)); return v; }
    template <typename C, typename W> struct cells_of { static std::vector<W> make(const bool* o, unsigned n) { return weight_cells<W>(o, n); } };
    template <typename C> struct cells_of<C, bool> { static std::vector<bool> make(const bool* o, unsigned n) { return bool_cells(o, n); } };

    // what a returned path must be: mode 1 a path is returned iff one exists; 2 the path is valid; 4 the path is as short as possible; 32 cells may repeat
    template <size_t K, typename path_t> size_t check_path(const gridspec& g, const bool* open, unsigned s, unsigned e, const co<K>& size, const path_t& path, unsigned mode) {
        const unsigned n = g.n;
        const size_t len = path.size();
        vp_note("path_cells", len);
        if (len == 0) {
            vp_reach("no path");
            if (mode & 1) vp_assert(!g.connected(open, s, e), "no path was returned although one exists");
        }
        else {
            vp_reach("path");
            vp_assert(len <= 64 && (len <= n || (mode & 32)), "the path is longer than the number of cells");
            bool inb = true; unsigned cell[64]; bool opn = true, adj = true, dup = false;
            for (size_t i = 0; i < len; ++i) {
                unsigned idx = 0, st = 1; for (size_t k = 0; k < K; ++k) { const uint32_t x = (uint32_t)vp_concretize(path[i][k]); inb &= x < size[k]; idx += x * st; st *= size[k]; }
                cell[i] = idx;
            }
            vp_assert(inb, "a path cell lies outside the maze");
            for (size_t i = 0; i < len; ++i) { opn &= open[cell[i]]; if (i) adj &= g.adjacent(cell[i - 1], cell[i]); for (size_t j = 0; j < i; ++j) dup |= cell[i] == cell[j]; }
            auto joins = [&](unsigned a, unsigned b) { return a == b || g.adjacent(a, b); };
            const bool fwd = joins(cell[0], s) && joins(cell[len - 1], e), bwd = joins(cell[0], e) && joins(cell[len - 1], s);
            const bool shape = adj && (fwd || bwd);
            if (mode & 1) {
                if (shape) vp_assert((opn & open[s] & open[e]) | g.connected(open, s, e), "a path was returned although none exists");
                else vp_assert(g.connected(open, s, e), "a path was returned although none exists");
            }
            if (s == e) { if (mode & 3) { vp_assert(len == 1, "start equals end: exactly one cell expected"); vp_assert(cell[0] == s, "start equals end: the path must be that cell"); } }
            else {
                vp_reach("nontrivial path");
                if (mode & 2) {
                    vp_assert(opn, "the path passes through a blocked cell");
                    vp_assert(adj, "consecutive path cells are not adjacent");
                    vp_assert(fwd || bwd, "the path does not connect start and end");
                    vp_assert(!dup || (mode & 32), "the path visits a cell twice");
                }
                if (mode & 4) {
                    unsigned moves = ~0u;
                    if (fwd) { unsigned m = (unsigned)len - 1 + (cell[0] != s) + (cell[len - 1] != e); if (m < moves) moves = m; }
                    if (bwd) { unsigned m = (unsigned)len - 1 + (cell[0] != e) + (cell[len - 1] != s); if (m < moves) moves = m; }
                    vp_note("moves", moves);
                    const unsigned w = (unsigned)vp_param("weight", 1), least = (moves - 1) / (w < 1 ? 1 : w); // a heuristic weight allows that many times the least
                    if (least > 0 && moves <= n) vp_assert(!(open[s] & open[e] & g.within(open, s, e, least)), "the path is longer than necessary");
                }
            }
        }
        return len;
    }
}
