// Jump point search on a 2-D octile grid with symbolic cells. The path is a list of jump points: each pair of consecutive
// points must lie on one straight or diagonal line of open cells. Macros: ALGO (jps, gjps), CELL, REV, LAZY, NOCLEAN, POOL.
#include "common.hpp"
#ifndef ALGO
#define ALGO jps
#endif
#ifndef CELL
#define CELL char
#endif
#ifndef REV
#define REV 1
#endif
#ifndef LAZY
#define LAZY 0
#endif
#ifndef NOCLEAN
#define NOCLEAN 0
#endif
#ifndef POOL
#define POOL 4096
#endif
using namespace vp;
using C = co<2>;
using maze_t = chdr::mazes::grid<C, CELL>;
using P = params<maze_t, C, CELL, REV, true, LAZY, NOCLEAN, POOL>;

// king moves from s to e within `steps`; strict: a diagonal step needs at least one open cell beside it
static bool within(const gridspec& g, const bool* open, unsigned s, unsigned e, unsigned steps, bool strict) {
    const unsigned w = g.size[0];
    bool a[64] = {}, b[64]; a[s] = true;
    for (unsigned k = 0; k < steps; ++k) {
        for (unsigned i = 0; i < g.n; ++i) {
            bool x = a[i];
            for (unsigned d = 0; d < g.degree[i]; ++d) {
                const unsigned j = g.nbr[i][d]; bool ok = a[j];
                const unsigned ix = i % w, iy = i / w, jx = j % w, jy = j / w;
                if (strict && ix != jx && iy != jy) ok &= open[ix + w * jy] | open[jx + w * iy];
                x |= ok;
            }
            b[i] = (x & open[i]) | (i == s);
        }
        for (unsigned i = 0; i < g.n; ++i) a[i] = b[i];
    }
    return a[e];
}
extern "C" void harness() {
    C size{}; size[0] = (uint32_t)vp_param("d0", 3); size[1] = (uint32_t)vp_param("d1", 3);
    const auto g = spec<2>(size, true); const unsigned n = g.n, w = size[0];
    const unsigned mode = (unsigned)vp_param("mode", 7);
    const uint64_t pat = vp_param("pattern", ~0ull), free_ = vp_param("free", ~0ull);
    bool open[64];
    for (unsigned i = 0; i < n; ++i) open[i] = ((free_ >> i) & 1u) ? vp_sym("open", 1) != 0 : ((pat >> i) & 1u) != 0;
    const unsigned ps = (unsigned)vp_param("s", 255), pe = (unsigned)vp_param("e", 255);
    const unsigned s = ps == 255 ? (unsigned)vp_pick("start", 0, n - 1) : ps, e = pe == 255 ? (unsigned)vp_pick("end", 0, n - 1) : pe;
    maze_t maze(size, cells_of<C, CELL>::make(open, n));
    P p{maze, coordof<2>(s, size), coordof<2>(e, size), size, &h_chebyshev<SCALAR, C>, nullptr, nullptr, nullptr};
    P::pools pools; pools.into(p);
    p.capacity = vp::capacity(); p.weight = (SCALAR)vp_param("weight", 1);
    auto path = chdr::solvers::solver<chdr::solvers::ALGO, P>::solve(std::as_const(p));
    const size_t len = path.size(); vp_note("path_points", len);
    if (len == 0) {
        vp_reach("no path");
        if (mode & 1) vp_assert(!(open[s] & open[e] & within(g, open, s, e, n - 1, true)), "no path was returned although one exists");
        return;
    }
    vp_reach("path");
    vp_assert(len <= n, "the path is longer than the number of cells");
    if (mode & 1) vp_assert(open[s] & open[e] & within(g, open, s, e, n - 1, false), "a path was returned although none exists");
    if (s == e) { vp_assert(len == 1 && index<2>(path[0], size) == s, "start equals end: exactly that cell expected"); return; }
    unsigned px[66], py[66], m = 0;
    auto push = [&](unsigned x, unsigned y) { if (m == 0 || px[m - 1] != x || py[m - 1] != y) { px[m] = x; py[m] = y; ++m; } };
    auto line = [&](unsigned x0, unsigned y0, unsigned x1, unsigned y1) { const unsigned dx = x0 > x1 ? x0 - x1 : x1 - x0, dy = y0 > y1 ? y0 - y1 : y1 - y0; return dx == dy || dx == 0 || dy == 0; };
    const unsigned sx = s % w, sy = s / w, ex = e % w, ey = e / w;
    unsigned qx[64], qy[64]; bool inb = true;
    for (size_t i = 0; i < len; ++i) { qx[i] = (unsigned)vp_concretize(path[i][0]); qy[i] = (unsigned)vp_concretize(path[i][1]); inb &= qx[i] < w && qy[i] < size[1]; }
    vp_assert(inb, "a path point lies outside the maze");
    // the end the list starts from may itself be left out
    const bool rev = !(line(sx, sy, qx[0], qy[0]) && qx[len - 1] == ex && qy[len - 1] == ey) ;
    if (!rev) { push(sx, sy); for (size_t i = 0; i < len; ++i) push(qx[i], qy[i]); push(ex, ey); }
    else      { push(sx, sy); for (size_t i = len; i-- > 0;) push(qx[i], qy[i]); push(ex, ey); }
    bool straight = true, opn = open[s] & open[e]; unsigned moves = 0;
    for (unsigned i = 1; i < m; ++i) {
        straight &= line(px[i - 1], py[i - 1], px[i], py[i]);
        unsigned x = px[i - 1], y = py[i - 1];
        for (unsigned k = 0; straight && k < 64 && (x != px[i] || y != py[i]); ++k) {
            const unsigned ox = x, oy = y;
            x += px[i] > x ? 1 : px[i] < x ? -1 : 0; y += py[i] > y ? 1 : py[i] < y ? -1 : 0; ++moves;
            opn &= open[x + w * y];
            if ((mode & 8) && ox != x && oy != y) opn &= open[ox + w * y] | open[x + w * oy];
        }
    }
    if (mode & 2) {
        vp_assert(straight, "consecutive path points are not on one straight or diagonal line");
        vp_assert(opn, "the path passes through a blocked cell");
    }
    vp_note("moves", moves);
    if ((mode & 4) && straight && moves > 1 && moves <= n) vp_assert(!(open[s] & open[e] & within(g, open, s, e, moves - 1, true)), "the path is longer than necessary");
}
