#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
S = "include/solvers/"; B = S + "base/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None),
                  level_note=level_note, na=na))
TESTS = "the tests run one pseudo-random, always solvable, cube-shaped grid per solver and size from the first to the last cell with one option set, and only ask for a non-empty result"
ALLSOLVERS = ["include/solvers/*.hpp", B + "solver.hpp"]
SOLVE = "solver<solver_t, params_t>::solve(params)"

prop("C01", "A grid solver returns a path exactly when one exists, and always returns",
     "On every grid maze and for every pair of start and end cells, each solver other than jump point search returns a non-empty path if and only if both endpoints are open and connected through open cells under the selected neighbourhood (axis or octile). It returns after finitely many steps whether or not a path exists. This holds for every combination of its options (lazy sorting, cleanup, reverse equivalence, cell type, dimensions, capacity), with a memory limit that is not smaller than the number of cells.",
     ["inputs", "configurations"], "every assignment of open/blocked to the cells of a grid, every start and end, every option combination, all 20 solvers",
     TESTS + "; unsolvable mazes, other shapes, endpoints and options are never run", ALLSOLVERS + ["include/mazes/grid.hpp", "include/types/containers/"],
     [("open list / closed set expansion loop", S + "*.hpp: solve_internal"), ("iterative deepening bounds", S + "iddfs.hpp, idastar.hpp, eid*.hpp"), ("endpoint guards", B + "solver.hpp: solver::solve")], [SOLVE])
prop("C02", "Every path a grid solver returns is walkable and joins start to end",
     "Whenever a solver (other than flood fill and jump point search) returns a path on a grid, every listed cell lies inside the grid and is open, consecutive cells are one step apart under the selected neighbourhood, and no cell is listed twice. One end of the list is the start cell or next to it, the other is the end cell or next to it. When start and end are the same open cell the path is exactly that cell.",
     ["inputs", "configurations"], "every grid, endpoint pair and option combination, 19 solvers", TESTS + "; the cells of the path are never looked at", ALLSOLVERS + ["include/mazes/grid.hpp"],
     [("path reconstruction from parent links", B + "solver.hpp: rbacktrack, ibacktrack"), ("neighbour expansion", "include/mazes/grid.hpp: get_neighbours"), ("parent node storage", B + "bnode.hpp, managed_node.hpp, unmanaged_node.hpp")], [SOLVE])
prop("C03", "Solvers documented as optimal return shortest grid paths",
     "On uniform-cost grids A*, G*, BFS, GBFS, Dijkstra, fringe, IDDFS, IDA*, their enhanced variants and MG* (with enough memory) return a path with the least possible number of steps, given a consistent heuristic. This holds for axis and octile neighbourhoods, every maze, every pair of endpoints and every option combination, except that A*, G* and MG* need their open list sorted (lazy sorting off) and MG* axis neighbours.",
     ["inputs", "configurations"], "every grid, endpoint pair and option combination, the 11 solvers documented to be optimal", TESTS + "; path length is never compared with anything", ALLSOLVERS,
     [("priority order of the open list", S + "astar.hpp, dijkstra.hpp, gstar.hpp, ..."), ("bound increments", S + "idastar.hpp, eidastar.hpp, iddfs.hpp, eiddfs.hpp")], [SOLVE])
prop("C04", "Endpoints outside the maze or blocked give no path; equal endpoints give that cell",
     "For any start and end coordinates whatsoever, a solver returns an empty path when either lies outside the grid (or names no node of the graph) or is blocked, without touching memory outside the maze. When start and end are the same open cell or existing node, it returns exactly that one. All 22 solvers, every option.",
     ["inputs", "configurations"], "every pair of coordinates over the full range of their type, every cell content", "the tests always start at the first and end at the last cell of a maze in which both are open", ALLSOLVERS + ["include/mazes/grid.hpp", "include/mazes/graph.hpp"],
     [("endpoint guards", B + "solver.hpp: solver::solve"), ("containment", "include/mazes/grid.hpp, graph.hpp: contains, operator[]")], [SOLVE])
prop("C05", "Solvers use memory resources correctly, also when an allocation fails",
     "While solving, a solver never uses a block it has given back, returns every block only to the resource it came from and with the size and alignment it asked for, and at most once. With cleanup enabled the resources are reset and no memory is left behind after each solve, and the same resources serve the next solve with the same answer. If any allocation fails, the solver either still gives a right answer or reports bad_alloc, with everything given back, and solving again succeeds.",
     ["inputs", "configurations", "fault_sequences"], "every small maze and graph, all 22 solvers, every single failing allocation", "the tests run with ample memory, never fail an allocation and cannot see into the pools", ALLSOLVERS + ["include/types/pmr/", "include/types/containers/"],
     [("node lifetime", B + "managed_node.hpp: expunge; " + S + "*.hpp: solve_internal"), ("cleanup and rethrow", B + "solver.hpp: solve, reset_resources")], [SOLVE, "std::pmr::memory_resource interface"])
prop("C07", "Dijkstra, fringe search, A*, G* and IDA* return cheapest paths on weighted graphs",
     "On a graph maze with non-negative edge weights, Dijkstra, fringe search, A*, G* and IDA* return a path whose total weight is minimal among all paths from start to end, for undirected and directed graphs alike, given a heuristic that never overestimates and is consistent. Dijkstra, fringe search and IDA* do so with lazy sorting as well. They return an empty path exactly when the end cannot be reached.",
     ["inputs", "configurations"], "every graph and every assignment of weights", "no test solves a graph maze", [S + "dijkstra.hpp", S + "fringe.hpp", S + "astar.hpp", S + "gstar.hpp", S + "idastar.hpp", "include/mazes/graph.hpp", "include/types/containers/heap.hpp"],
     [("relaxation and ordering by accumulated cost", S + "dijkstra.hpp"), ("bucket lists and cache of best costs", S + "fringe.hpp")], [SOLVE])
prop("C08", "Jump point search finds shortest king-move paths on 2-D octile grids",
     "On every two-dimensional grid with octile neighbours, JPS and GJPS return a path whenever end can be reached from start by king moves whose diagonal steps have at least one open cell beside them, and never when no king-move path exists at all. Consecutive returned points lie on one straight or diagonal line that crosses open cells only, and the number of king moves is the least possible. They always return.",
     ["inputs", "configurations"], "every 2-D grid, endpoint pair and option combination", "the tests run JPS and GJPS on one random grid per size and only ask for a non-empty result", [S + "jps.hpp", S + "gjps.hpp"],
     [("forced-neighbour and jump rules", S + "jps.hpp: jump, forced; gjps.hpp"), ("path reconstruction", B + "solver.hpp")], [SOLVE])
prop("C10", "Memory-bounded searches respect any memory limit and still return sound answers",
     "With any positive memory limit, however small, SMA*, OSMA* and MG* return after finitely many steps with either an empty path or a walkable path from start to end, and never keep more search nodes than the limit allows. Running short of memory never makes them use memory they have given back.",
     ["inputs", "configurations"], "every small maze and every memory limit from one to beyond the size of the maze", "the tests always set the limit to 90 on mazes of at most 1000 cells and only ask for a non-empty result", [S + "smastar.hpp", S + "osmastar.hpp", S + "mgstar.hpp", B + "managed_node.hpp"],
     [("forgetting and regrowing nodes", S + "smastar.hpp, osmastar.hpp, mgstar.hpp: memory_usage, desaturate, bitwise_regression")], [SOLVE])
prop("C11", "Solvers on graph mazes find valid paths exactly when they exist",
     "On graph mazes, undirected or directed, every solver that supports graphs returns a non-empty path if and only if the end is reachable from the start along existing edges (flood fill included). The path lists existing nodes without repetition, each consecutive pair joined by an edge in the direction of travel, and joins start to end. Nodes with hundreds of edges are no exception.",
     ["inputs", "configurations"], "every small graph (all edge sets), all pairs of endpoints, weights, hub sizes beyond 8-bit counters; 16 solvers", "no test solves a graph maze", ALLSOLVERS + ["include/mazes/graph.hpp", B + "managed_node.hpp"],
     [("graph neighbour expansion", S + "*.hpp: is_graph_v branches"), ("reference counts of parent nodes", B + "managed_node.hpp: expunge, m_successors")], [SOLVE])
prop("C12", "Index and coordinate conversion are inverse bijections",
     "For every grid size, converting an index below the number of cells to a coordinate gives a coordinate inside the grid, converting it back gives the same index, and likewise starting from any coordinate inside the grid. The first dimension varies fastest. The product of the sizes is the number of cells.",
     ["inputs", "configurations"], "every index, coordinate and grid size, in every number of dimensions", "the tests use cube-shaped grids only and never call the conversions directly", ["include/utils/utils.hpp"], [("stride accumulation", "include/utils/utils.hpp: to_nd, to_1d, product")], ["utils::to_nd", "utils::to_1d", "utils::product"])
prop("C13", "Axis neighbours of a grid cell are exactly the adjacent open cells",
     "For every cell of every grid, the neighbours reported without diagonals and marked active are exactly the open cells that differ by one in exactly one dimension, each reported once. Nothing outside the grid and no blocked cell is ever reported active. Asking by coordinate and by index gives the same answer.",
     ["inputs", "configurations"], "every grid shape, cell content and queried cell, bool and weighted cells, any number of dimensions", "the tests see neighbours only through solving one random maze", ["include/mazes/grid.hpp"], [("bounds checks per axis", "include/mazes/grid.hpp: get_neighbours<false>, check_neighbour")], ["grid::get_neighbours<false>"])
prop("C14", "Octile neighbours and single-direction queries of a grid are exact",
     "For every cell of every grid, the neighbours reported with diagonals and marked active are exactly the open cells that differ by at most one in every dimension, other than the cell itself, each reported once; nothing outside the grid is reported active. A query for a single direction reports whether the cell in that direction exists and is open, and its coordinate.",
     ["inputs", "configurations"], "every grid shape, cell content, queried cell and direction", "no test uses octile neighbours except jump point search on a few random grids", ["include/mazes/grid.hpp"], [("direction kernel", "include/utils/utils.hpp: make_kernel; include/mazes/grid.hpp: get_neighbours<true>, check_neighbour")], ["grid::get_neighbours<true>", "grid::check_neighbour"])
prop("C15", "Grid containment, access, counting and iteration agree with its cells",
     "For every grid, containment holds exactly for coordinates and indices inside it, reading a cell by coordinate or by index gives the stored state, and iteration visits every cell once in index order. Counting gives the product of the sizes, a cell is transitory exactly when it has two open axis neighbours, and replacing or moving the cells is reflected by later queries.",
     ["inputs", "configurations"], "every grid shape and content, arbitrary (also out-of-range) coordinates and indices", "no test queries a grid directly", ["include/mazes/grid.hpp", "include/mazes/nodes/"], [("bounds comparison and node proxies", "include/mazes/grid.hpp: contains, operator[], count, is_transitory")], ["grid public interface"])
prop("C16", "A graph maze contains exactly the nodes and edges that were put in",
     "After any sequence of adding nodes, adding edges, removing edges, clearing and moving, a graph reports exactly the nodes and edges that remain: counting, containment, iteration, neighbour lists and node lookup all agree. Removing an edge removes every edge equal to it from that node, and a node left without edges by a removal goes with it.",
     ["histories", "inputs"], "every sequence of edits over a small set of nodes, every weight", "no test uses a graph", ["include/mazes/graph.hpp"], [("adjacency map", "include/mazes/graph.hpp: add, remove, clear")], ["graph public interface"], [("m_entries", "adjacency lists by node id", "include/mazes/graph.hpp")])
prop("C17", "Pruning a graph preserves reachability and distances between kept nodes",
     "Pruning an undirected weighted graph may remove intermediate nodes but leaves the shortest distance between any two remaining nodes unchanged and neither connects nor disconnects them. Dead ends are kept, no edge leads to a removed node, every remaining edge has its counterpart, and no node is connected to itself. While more than two nodes are left, no node that merely connects two others remains.",
     ["inputs"], "every small undirected graph and every assignment of positive weights, parallel edges included", "no test prunes a graph", ["include/mazes/graph.hpp"], [("contraction of degree-two nodes", "include/mazes/graph.hpp: prune")], ["graph::prune"])
prop("C18", "The heap always yields an element of highest priority and loses none",
     "After any sequence of insertions (single, at a position, batch, appended unsorted and then sorted up, or built from a container) and removals, the heap's top is a stored element that no stored element precedes in priority, and size and emptiness are right. Draining it returns every inserted element exactly once in priority order. This holds for any number of children per node and any comparison.",
     ["histories", "inputs"], "every sequence of operations and every assignment of keys", "the tests use the heap only inside solvers, whose results they do not inspect", ["include/types/containers/heap.hpp"], [("sift up / sift down", "include/types/containers/heap.hpp: sort_up, sort_down, emplace, pop")], ["heap public interface"])
prop("C19", "Heap erase, re-prioritisation, copy, move and clear keep order and contents",
     "Erasing any stored elements (by reference, position or range), or changing an element's key and restoring the order upwards or downwards, leaves a heap that still yields every other element exactly once in priority order. Copying, moving, swapping, clearing and reserving preserve or transfer exactly the stored elements.",
     ["histories", "inputs"], "every position and every assignment of keys, old and new", "no test erases from or re-prioritises a heap directly", ["include/types/containers/heap.hpp"], [("element replacement and re-sorting", "include/types/containers/heap.hpp: erase, sort_up, sort_down")], ["heap public interface"])
prop("C20", "Queue is first-in first-out and stack is last-in first-out",
     "After any sequence of push, emplace, pop, copy, move, assignment and clear, a queue's next element is the oldest one still stored and a stack's is the newest; size, emptiness and iteration order in both directions agree. No element is lost, duplicated or altered.",
     ["histories", "inputs"], "every sequence of operations and every element value", "the tests use queue and stack only inside solvers", ["include/types/containers/queue.hpp", "include/types/containers/stack.hpp"], [("underlying sequence", "queue.hpp, stack.hpp")], ["queue and stack public interface"])
prop("C21", "The existence set contains exactly what was inserted and not erased",
     "After any sequence of insertions, erasures, trimming, clearing, growing, copying and moving, an existence set contains a hash if and only if it was inserted and not erased or cleared since. Queries for any other value, however large, answer no, iteration agrees with membership, and an insertion that cannot be carried out is refused.",
     ["histories", "inputs"], "every sequence of operations over a range of hashes, both element widths, arbitrary queried values", "the tests use the set only inside solvers", ["include/types/containers/existence_set.hpp"], [("growth before marking", "include/types/containers/existence_set.hpp: emplace, push, allocate, prune")], ["existence_set public interface"])
POOLTXT = "every sequence of allocations (sizes, alignments), deallocations, resets and releases, every point at which the system may run out of memory"
for pid, nm, f, extra in (("C22", "monotonic", "monotonic_pool.hpp", ""), ("C23", "heterogeneous", "heterogeneous_pool.hpp", ""), ("C24", "homogeneous", "homogeneous_pool.hpp", ", and a block given back serves the next request of its size without new memory")):
    prop(pid, "The %s pool never hands out overlapping, misaligned or short memory" % nm,
         "Every block the %s pool hands out has the requested size and alignment, lies in memory the pool owns, and overlaps no block that is still in use, through any sequence of allocation, deallocation, reset, release and move%s. If the system runs out of memory the request fails with bad_alloc, blocks in use stay intact and the pool stays usable. Destruction and release give every byte back exactly once." % (nm, extra),
         ["histories", "inputs", "fault_sequences"], POOLTXT, "the tests use the pools only through solvers with generous memory and never check what is handed out", ["include/types/pmr/" + f],
         [("stack block, growth and reuse", "include/types/pmr/%s: do_allocate, do_deallocate, expand, reset, release" % f)], ["std::pmr::memory_resource interface, reset(), release()"])
prop("C26", "Distance heuristics compute their metric exactly and are consistent",
     "For every pair of coordinates for which the result fits, Manhattan, Chebyshev and squared Euclidean distance equal their definitions, are symmetric, and are zero exactly for equal coordinates. Manhattan distance changes by at most one per axis move and Chebyshev distance by at most one per octile move. Euclidean, octile, Canberra and cosine distance agree with their definitions.",
     ["inputs"], "every pair of coordinates, in 1 to 4 dimensions", "the tests only use Manhattan and Chebyshev distance inside solvers", ["include/utils/heuristics.hpp"], [("per-dimension accumulation", "include/utils/heuristics.hpp")], ["heuristics::*_distance"])
prop("C27", "Integer helpers agree with their mathematical definition",
     "sign, abs, min, max and clamp give the mathematical result for every representable argument for which it is representable, for signed and unsigned integers of every width. powui gives base to the power exponent whenever the result fits the type.",
     ["inputs"], "every argument value", "no test calls the helpers", ["include/utils/utils.hpp"], [("comparison and square-and-multiply", "include/utils/utils.hpp: sign, abs, min, max, clamp, powui")], ["utils::*"])
prop("C28", "Trimming a decimal text removes only trailing fractional zeros",
     "For every decimal text, trimming removes exactly the zeros at the end of its fraction and the point if nothing is left behind it, and never changes its value. Whole numbers are returned unchanged.",
     ["inputs"], "every decimal text up to the length bound", "no test calls it", ["include/utils/utils.hpp"], [("search from the end", "include/utils/utils.hpp: trim_trailing_zeros")], ["utils::trim_trailing_zeros"])
prop("C30", "A graph built from a grid preserves the grid's distances",
     "For every grid, number of processor cores and order in which the worker threads run, constructing a graph from the grid gives nodes that are open cells, edges that lead to existing nodes, and between any two nodes the same connectivity and least distance as in the grid by axis moves. Every dead end of the grid (open cell with exactly one open neighbour) is a node, and a connected region with several cells that are not part of a passage (cells without exactly two open neighbours) keeps at least two nodes. Workers change the graph only while holding the lock, and no memory is left behind.",
     ["inputs", "schedules"], "every grid and every number and order of the worker threads", "no test constructs a graph from a grid", ["include/mazes/graph.hpp"], [("parallel construction", "include/mazes/graph.hpp: graph(const grid&)")], ["graph(grid)"])
prop("C31", "Durations are formatted with the right unit and value",
     "Formatting a duration chooses the largest unit that keeps the value at least one and prints a value equal to the duration in that unit up to the printed precision.",
     ["inputs"], "every duration", "no test formats a duration", ["include/utils/utils.hpp"], [("unit scaling", "include/utils/utils.hpp: to_string")], ["utils::to_string"],
     na="the arithmetic is on x87 long double and the text comes from the C library's printf, neither of which Z3 (no 80-bit semantics matching log10/printf) nor the executor can encode")
prop("C32", "Heuristic weights and poor heuristics cost path quality at most, and boundedly",
     "Whatever values the heuristic returns (inadmissible or inconsistent ones included) and whatever weight the heuristic is given, every solver other than SMA* and jump point search that uses a heuristic still returns, and returns a walkable path exactly when one exists. With a consistent heuristic and heuristic weight w >= 1, A*, G* (sorted), fringe search, IDA* and enhanced IDA* return a path costing at most w times the least possible. With weight 0 it costs the least possible. SMA* finds a path exactly when one exists on grids under any heuristic weight.",
     ["inputs"], "every maze, every heuristic value table and several heuristic weights", "the tests use one admissible heuristic with weight 1 and do not look at path cost", ["include/solvers/"], [("f = g + h * weight", "include/solvers/{astar,gstar,fringe,idastar,eidastar,osmastar,mgstar,best_first,gbest_first,idbest_first,eidbest_first,smastar}.hpp")], ["solver::solve with _params.h and _params.weight"])

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    note = "Bounded: every execution path of the compiled library code within the stated bounds is decided by Z3; counterexamples are replayed natively. Trusts the executor in engine/, Z3, clang's lowering and the libstdc++ stubs in harness/rt.cpp."
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                          technique="symbolic execution of the compiled code (LLVM IR) with Z3", level="model_checking", level_note=p["level_note"] or note) for p in P if not p["na"]],
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
             notes="No hooks are needed in /repo: the harnesses instantiate the library's templates directly. DESIGN.md describes bounds, findings and repairs.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
